package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	checks["C14"] = check{level: "exploration",
		rule:   "A case takes valid requests of all fourteen operations on a populated instance and changes them: every single change of one field at any depth (message removed or emptied, variant unset or switched, string emptied or made strange, number or enum out of range, list emptied, element absent or doubled), enumerated exhaustively, then random combinations. Each runs embedded on its own copy of the store (a panic is caught and reported; an error must leave every stored byte unchanged and the instance must pass a full read-back) and over gRPC against a shared server (whose death is reported). Also random bytes as YAML and expressions. Non-trivial: the changed request was answered with an error; distinct by request.",
		floors: map[string]int64{"single changes": 4000, "combined changes": 5000, "over gRPC": 2000, "answered with an error": 5000},
		run: func(r *Run) {
			r.Cases(0, r.n(120, 1200), c14single)
			r.Cases(1000000, r.n(900, 16000), c14multi)
			r.Cases(2000000, r.n(60, 800), c14grpc)
			r.Cases(3000000, r.n(600, 12000), c14text)
		}}
}

// a mutation changes one field of a request in place
type mutation struct {
	path string
	do   func(root protoreflect.Message)
}

// at returns the message a field path leads to, in another copy of the root.
type hop struct {
	fd  protoreflect.FieldDescriptor
	idx int
}

func follow(m protoreflect.Message, hops []hop) protoreflect.Message {
	for _, h := range hops {
		if h.fd.IsList() {
			l := m.Get(h.fd).List()
			if h.idx >= l.Len() {
				return nil
			}
			m = l.Get(h.idx).Message()
		} else {
			if !m.Has(h.fd) {
				return nil
			}
			m = m.Get(h.fd).Message()
		}
		if !m.IsValid() {
			return nil
		}
	}
	return m
}

func strangeStrings() []string {
	return []string{"", "\x00", "nosuch", strings.Repeat("x", 5000), "\xff\xfe", "_this", "*", "/", "a/b:c#d@e"}
}

// mutations enumerates every single change of a message.
func mutations(root protoreflect.Message) []mutation {
	var out []mutation
	var walk func(m protoreflect.Message, hops []hop, path string)
	walk = func(m protoreflect.Message, hops []hop, path string) {
		hops = append([]hop(nil), hops...)
		add := func(p string, f func(m protoreflect.Message)) {
			out = append(out, mutation{path + p, func(r protoreflect.Message) {
				if x := follow(r, hops); x != nil {
					f(x)
				}
			}})
		}
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			name := "." + string(fd.Name())
			has := m.Has(fd)
			if has {
				add(name+" cleared", func(m protoreflect.Message) { m.Clear(fd) })
			}
			switch {
			case fd.IsMap():
				add(name+" odd map", func(m protoreflect.Message) {
					mp := m.Mutable(fd).Map()
					mp.Set(protoreflect.ValueOfString("").MapKey(), protoreflect.ValueOfString(""))
				})
			case fd.IsList() && fd.Message() != nil:
				add(name+" empty element", func(m protoreflect.Message) {
					l := m.Mutable(fd).List()
					l.Append(l.NewElement())
				})
				add(name+" absent element", func(m protoreflect.Message) {
					l := m.Mutable(fd).List()
					l.Append(protoreflect.ValueOfMessage(l.NewElement().Message().Type().Zero()))
				})
				if has {
					add(name+" absent first element", func(m protoreflect.Message) {
						l := m.Mutable(fd).List()
						if l.Len() > 0 {
							l.Set(0, protoreflect.ValueOfMessage(l.NewElement().Message().Type().Zero()))
						}
					})
					add(name+" doubled element", func(m protoreflect.Message) {
						l := m.Mutable(fd).List()
						if l.Len() > 0 {
							l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(0).Message().Interface()).ProtoReflect()))
						}
					})
					for j := 0; j < m.Get(fd).List().Len(); j++ {
						if e := m.Get(fd).List().Get(j).Message(); e.IsValid() {
							walk(e, append(hops, hop{fd, j}), fmt.Sprintf("%s%s[%d]", path, name, j))
						}
					}
				}
			case fd.IsList():
				add(name+" element", func(m protoreflect.Message) {
					l := m.Mutable(fd).List()
					l.Append(l.NewElement())
				})
			case fd.Message() != nil:
				add(name+" set to empty", func(m protoreflect.Message) { m.Set(fd, m.NewField(fd)) })
				if has {
					walk(m.Get(fd).Message(), append(hops, hop{fd, 0}), path+name)
				}
			case fd.Kind() == protoreflect.StringKind:
				for _, s := range strangeStrings() {
					s := s
					add(fmt.Sprintf("%s=%q", name, trunc(s, 10)), func(m protoreflect.Message) { m.Set(fd, protoreflect.ValueOfString(s)) })
				}
			case fd.Kind() == protoreflect.EnumKind:
				for _, v := range []protoreflect.EnumNumber{0, 1, 2, 3, 99, -1, 1 << 30} {
					v := v
					add(fmt.Sprintf("%s=%d", name, v), func(m protoreflect.Message) { m.Set(fd, protoreflect.ValueOfEnum(v)) })
				}
			case fd.Kind() == protoreflect.BytesKind:
				add(name+" large", func(m protoreflect.Message) { m.Set(fd, protoreflect.ValueOfBytes(make([]byte, 3000))) })
			}
		}
	}
	walk(root, nil, "")
	return out
}

// c14world populates an instance with everything requests can be about.
func c14world(t *T) (*mapKV, *World, []proto.Message) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	p := &Pol{ID: "p", Name: "n", Desc: "d", Attrs: map[string]string{"a": "b"}, Res: []*ResDef{
		{Name: "user"},
		{Name: "group", Rels: []*RelDef{{Name: "member", E: eThis(), Form: 'p', Restr: 's', Allow: []Restr{{Res: "user"}, {"group", "member"}}}, {Name: "parent", E: eThis(), Form: 'p', Restr: '*'}}},
		{Name: "doc", Rels: []*RelDef{
			{Name: "parent", E: eThis(), Form: 'p', Restr: '*'},
			{Name: "banned", E: eThis(), Form: 'p', Restr: '*'},
			{Name: "owner", E: eOp(eThis(), '+', eTTU("parent", "member")), Form: 'x', Restr: '*'},
			{Name: "viewer", E: eOp(eOp(eThis(), '+', eCU("owner")), '-', eCU("banned")), Form: 'p', Restr: '*'}}}}}
	other := p.clone()
	other.ID = "sanity"
	ts := []Tuple{
		{"group", "g", "member", 'e', "user", "u", ""},
		{"group", "h", "member", 's', "group", "g", "member"},
		{"group", "h", "member", 'w', "user", "", ""},
		{"doc", "d", "parent", 'e', "group", "g", ""},
		{"doc", "d", "owner", 's', "group", "h", "member"},
		{"doc", "d", "viewer", 'e', "user", "v", ""},
		{"doc", "d", "banned", 'e', "user", "b", ""},
	}
	for _, q := range []*Pol{p, other} {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: q.def(t, 0), AppData: []byte("app")})
		for _, u := range ts {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: q.ID, Relationship: u.proto(), AppData: []byte("x")})
		}
	}
	n := other.clone()
	n.ID = "new"
	acc := func() *domain.AccessRequest {
		return &domain.AccessRequest{Object: ent("doc", "d"), Relation: "viewer", Subject: ent("user", "u")}
	}
	x := other.clone()
	x.ID = "p"
	x.Res[2].Rels[3].E = eOp(eThis(), '&', eOp(eCU("owner"), '-', eTTU("parent", "member")))
	x.Res[2].Rels[3].Form = 'x'
	doc, _, _ := n.yaml(t)
	reqs := []proto.Message{
		&api.CreatePolicyRequest{PolicyDefinition: n.def(t, 0), AppData: []byte("a")},
		&api.CreatePolicyRequest{PolicyDefinition: yamlDef(doc), AppData: []byte("a")},
		&api.UpdatePolicyRequest{PolicyDefinition: x.def(t, 0), AppData: []byte("b")},
		&api.DeletePolicyRequest{Id: "p"},
		&api.GetPolicyRequest{Id: "p"},
		&api.ListPolicyIdsRequest{},
		&api.SetRelationshipRequest{PolicyId: "p", Relationship: Tuple{"group", "g", "member", 'e', "user", "new", ""}.proto(), AppData: []byte("x")},
		&api.SetRelationshipRequest{PolicyId: "p", Relationship: Tuple{"group", "g", "member", 's', "group", "h", "member"}.proto()},
		&api.SetRelationshipRequest{PolicyId: "p", Relationship: Tuple{"doc", "d", "viewer", 'w', "user", "", ""}.proto()},
		&api.CheckRequest{PolicyId: "p", AccessRequest: acc()},
		&api.ExplainCheckRequest{PolicyId: "p", AccessRequest: acc(), Format: api.ExplainFormat_JSON},
		&api.ExplainCheckRequest{PolicyId: "p", AccessRequest: acc(), Format: api.ExplainFormat_DOT},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'s', "doc", "d", "viewer"}.proto(), Format: api.ExplainFormat_DOT},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'e', "doc", "d", ""}.proto(), Format: api.ExplainFormat_JSON},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'w', "doc", "", ""}.proto(), Format: api.ExplainFormat_JSON},
		&api.DumpRelationshipsRequest{PolicyId: "p"},
	}
	for _, u := range []Tuple{ts[0], ts[1], ts[2]} {
		reqs = append(reqs, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: u.proto()}, &api.GetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	for _, o := range []byte("*or") {
		for _, rk := range []byte("*n") {
			for i, sk := range []byte("*rxxx") {
				sel := Sel{OK: o, ORes: "group", OId: "h", RK: rk, Rel: "member", SK: sk, SRes: "user"}
				if sk == 'x' {
					sel.S = Tuple{SK: "esw"[i-2], SRes: "user", SId: "u", SRel: "member"}
				}
				reqs = append(reqs, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: sel.proto()}, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: sel.proto()})
			}
		}
	}
	return kv, w, reqs
}

// c14probe issues one malformed request on its own copy.
func c14probe(t *T, kv *mapKV, w *World, req proto.Message, what string) {
	c := kv.clone()
	s := mustEmbedded(t, c)
	t.trace = t.trace[:0]
	t.Log("%s: %s", what, show(req))
	before := c.snapshot()
	w2 := w.clone()
	e := Exp{err: errAny}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(caseFailure); ok {
					panic(p)
				}
				e = Exp{err: errAny} // the model does not speak about this request
			}
		}()
		e = w2.Apply(proto.Clone(req))
	}()
	resp, err := s.Do(t, req)
	noPanic(t, req, err)
	if err == nil && (resp == nil || !resp.ProtoReflect().IsValid()) {
		t.Failf("%s answered neither a response nor an error (%s)\nrequest: %s", opName(req), what, show(req))
	}
	if err == nil && e.err == errMust {
		if e.why != "incomplete selector" {
			judge(t, req, resp, err, e)
		}
		// an ordinary empty answer
		if d := sameSnapshot(before, c.snapshot()); d != "" {
			t.Failf("%s acted upon a request that does not say what to do: %s\nrequest (%s): %s\nresponse: %s", opName(req), d, what, show(req), show(resp))
		}
		t.Count("incomplete requests answered without effect", 1)
	}
	if err != nil {
		t.Count("answered with an error", 1)
		t.Nontrivial(show(req))
		if d := sameSnapshot(before, c.snapshot()); d != "" {
			t.Failf("%s was answered with an error (%v) but changed the store: %s\nrequest (%s): %s", opName(req), err, d, what, show(req))
		}
		w2 = w
	} else if e.err == errAny || e.err == errMust {
		// an unspecified request succeeded; the model does not know the outcome, only that the
		// service still works
		w2 = nil
	}
	if w2 != nil {
		sweep(t, s, w2)
		return
	}
	for _, q := range []proto.Message{
		&api.ListPolicyIdsRequest{}, &api.GetPolicyRequest{Id: "p"},
		&api.FindRelationshipRecordsRequest{PolicyId: "sanity", Selector: anySel()},
		&api.CheckRequest{PolicyId: "sanity", AccessRequest: &domain.AccessRequest{Object: ent("doc", "d"), Relation: "viewer", Subject: ent("user", "u")}},
		&api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{Object: ent("doc", "d"), Relation: "viewer", Subject: ent("user", "u")}},
		&api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySel()},
		&api.DumpRelationshipsRequest{PolicyId: "p"},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'s', "doc", "d", "viewer"}.proto()},
		&api.DeletePolicyRequest{Id: "p"}, &api.ListPolicyIdsRequest{},
	} {
		_, err := s.Do(t, q)
		noPanic(t, q, err)
	}
}

func c14single(t *T) {
	kv, w, reqs := c14world(t)
	for i, base := range reqs {
		if i%40 != t.idx%40 && !(t.run.thorough() && i%8 == t.idx%8) {
			continue
		}
		for _, m := range mutations(base.ProtoReflect()) {
			req := proto.Clone(base)
			m.do(req.ProtoReflect())
			c14probe(t, kv, w, req, opName(base)+m.path)
			t.Count("single changes", 1)
		}
		empty := base.ProtoReflect().New().Interface()
		c14probe(t, kv, w, empty, opName(base)+" empty")
	}
}

func c14multi(t *T) {
	kv, w, reqs := c14world(t)
	for i := 0; i < 40; i++ {
		req := proto.Clone(pick(t, reqs))
		what := opName(req)
		for n := 2 + t.Intn(3); n > 0; n-- {
			ms := mutations(req.ProtoReflect())
			if len(ms) == 0 {
				break
			}
			m := pick(t, ms)
			m.do(req.ProtoReflect())
			what += " " + m.path
		}
		c14probe(t, kv, w, req, what)
		t.Count("combined changes", 1)
	}
	t.Sample(map[string]any{"last": append([]string(nil), t.trace...)})
}

// c14grpc sends malformed requests to a served instance. If the server dies, this process dies and
// the supervisor reports it.
func c14grpc(t *T) {
	kv, w, reqs := c14world(t)
	addr, err := startServer(kv)
	if err != nil {
		panic("harness: cannot serve: " + err.Error())
	}
	cl, err := dialRemote(addr)
	if err != nil {
		panic("harness: cannot connect: " + err.Error())
	}
	defer cl.conn.Close()
	sane := newWorld()
	sane.pols["sanity"] = w.pols["sanity"]
	for i := 0; i < 160; i++ {
		req := proto.Clone(pick(t, reqs))
		for n := 1 + t.Intn(2); n > 0; n-- {
			ms := mutations(req.ProtoReflect())
			if len(ms) > 0 {
				pick(t, ms).do(req.ProtoReflect())
			}
		}
		// the policy used for the sanity checks is not to be touched
		if strings.Contains(show(req), "\"sanity\"") {
			continue
		}
		t.Log("%s", show(req))
		cl.Do(t, req)
		t.Count("over gRPC", 1)
		if i%20 == 19 {
			for _, q := range []proto.Message{
				&api.GetPolicyRequest{Id: "sanity"}, &api.FindRelationshipRecordsRequest{PolicyId: "sanity", Selector: anySel()},
				&api.CheckRequest{PolicyId: "sanity", AccessRequest: &domain.AccessRequest{Object: ent("doc", "d"), Relation: "viewer", Subject: ent("user", "u")}},
				&api.CheckRequest{PolicyId: "sanity", AccessRequest: &domain.AccessRequest{Object: ent("doc", "d"), Relation: "viewer", Subject: ent("user", "b")}},
			} {
				resp, err := cl.Do(t, q)
				judge(t, q, resp, err, sane.Apply(q))
			}
		}
	}
}

// c14text feeds random text as YAML and as expressions.
func c14text(t *T) {
	kv, w, _ := c14world(t)
	p := genPol(t, "fresh", polOpts{hostile: t.Chance(50), maxRes: 3, maxRel: 3, depth: 3, restr: 'm', diffPct: 20, ttuPct: 25, noneTree: true})
	doc, _, ok := p.yaml(t)
	if !ok {
		doc = "id: fresh\nresources:\n  doc:\n    relations:\n      owner:\n        expr: _this\n        types: [\"*\"]\n"
	}
	for i := 0; i < 12; i++ {
		b := []byte(doc)
		for n := 1 + t.Intn(6); n > 0 && len(b) > 0; n-- {
			j := t.Intn(len(b))
			switch t.Intn(5) {
			case 0:
				b[j] = byte(t.Intn(256))
			case 1:
				b = append(b[:j:j], b[j+1:]...)
			case 2:
				b = append(b[:j:j], append([]byte(pick(t, []string{":", "\n", " ", "- ", "{", "}", "[", "]", "*a", "&a ", "!!binary ", "null", "<<: ", "? ", "|", "\t", "'", "\""})), b[j:]...)...)
			case 3:
				k := j + t.Intn(len(b)-j)
				b = append(b[:j:j], b[k:]...)
			case 4:
				k := j + t.Intn(len(b)-j)
				b = append(b[:k:k], append(append([]byte{}, b[j:k]...), b[k:]...)...)
			}
		}
		var req proto.Message = &api.CreatePolicyRequest{PolicyDefinition: yamlDef(string(b))}
		if i%3 == 2 {
			x := make([]byte, t.Intn(40))
			for j := range x {
				x[j] = pick(t, []byte("()+-&> _thisab\x00\xff\n1"))
			}
			req = &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: c12policy("fresh", string(x))}}}
		}
		c14probe(t, kv, w, req, "text")
		t.Count("texts", 1)
	}
}
