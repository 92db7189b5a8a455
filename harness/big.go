package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Cases of realistic size: long chains, wide objects, many relations. They exist for limits
// (depth, page size, lengths) that small instances never meet.

const bigBase = 5000000

// Big is an instance with the queries and the relationships that matter in it.
type Big struct {
	Inst
	roots []Node
	subs  [][2]string
	keys  []Tuple
	size  int
}

func bigInst(t *T, limit int) *Big {
	b := &Big{}
	span := func(lo, hi int) int { // log-uniform, so that small and large limits are both crossed
		if hi > limit {
			hi = limit
		}
		n := lo
		for n < hi && !t.Chance(10) {
			n += 1 + n/4
		}
		if n > hi {
			n = hi
		}
		return n
	}
	user := &ResDef{Name: "user"}
	b.subs = [][2]string{{"user", "u"}, {"user", "none"}}
	shape := t.Intn(9)
	if limit > 3000 {
		shape = 3
	}
	switch shape {
	case 0:
		b.shape, b.size = "userset chain", span(20, 600)
		member := pick(t, []string{"_this", "_this + lead", "lead + _this", "_this - barred", "(_this + lead) - barred"})
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "group", Rels: rels("member", member, "lead", "_this", "barred", "_this")}}}
		for i := 0; i < b.size; i++ {
			b.tuples = append(b.tuples, S("group", fmt.Sprint(i), "member", "group", fmt.Sprint(i+1), "member"))
		}
		end := E("group", fmt.Sprint(b.size), "member", "user", "u")
		b.tuples = append(b.tuples, end)
		b.keys = []Tuple{end, pick(t, b.tuples), pick(t, b.tuples)}
		if strings.Contains(member, "barred") {
			b.keys = append(b.keys, E("group", fmt.Sprint(t.Intn(b.size)), "barred", "user", "u"))
		}
		b.roots = []Node{{'s', "group", "0", "member"}, {'s', "group", fmt.Sprint(b.size / 2), "member"}}
	case 1:
		b.shape, b.size = "parent chain", span(20, 600)
		viewer := pick(t, []string{"_this + parent->viewer", "parent->viewer + _this", "_this + owner + parent->viewer", "(_this + parent->viewer) - barred"})
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "dir", Rels: rels("parent", "_this", "owner", "_this", "barred", "_this", "viewer", viewer)}}}
		for i := 0; i < b.size; i++ {
			b.tuples = append(b.tuples, E("dir", fmt.Sprint(i), "parent", "dir", fmt.Sprint(i+1)))
		}
		end := E("dir", fmt.Sprint(b.size), "viewer", "user", "u")
		b.tuples = append(b.tuples, end)
		b.keys = []Tuple{end, pick(t, b.tuples), pick(t, b.tuples), E("dir", fmt.Sprint(t.Intn(b.size)), "barred", "user", "u")}
		b.roots = []Node{{'s', "dir", "0", "viewer"}, {'s', "dir", fmt.Sprint(b.size / 3), "viewer"}}
	case 2:
		b.shape, b.size = "relation chain", span(10, 150)
		r := &ResDef{Name: "obj"}
		for i := 0; i < b.size; i++ {
			r.Rels = append(r.Rels, rels(fmt.Sprintf("r%d", i), fmt.Sprintf(pick(t, []string{"r%d", "r%d", "_this + r%d", "r%d + _this"}), i+1))...)
		}
		r.Rels = append(r.Rels, rels(fmt.Sprintf("r%d", b.size), "_this")...)
		b.p = &Pol{ID: "p", Res: []*ResDef{user, r}}
		b.tuples = []Tuple{E("obj", "o", fmt.Sprintf("r%d", b.size), "user", "u")}
		b.keys = []Tuple{b.tuples[0]}
		b.roots = []Node{{'s', "obj", "o", "r0"}, {'s', "obj", "o", fmt.Sprintf("r%d", b.size/2)}}
	case 3:
		b.shape, b.size = "wide set", span(60, 3000)
		if limit > 3000 {
			b.size = limit - t.Intn(200)
		}
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "group", Rels: rels("member", "_this")}, {Name: "doc", Rels: rels("viewer", "_this", "banned", "_this", "reader", pick(t, []string{"viewer", "viewer - banned", "_this + viewer", "viewer & _this + viewer"}))}}}
		for i := 0; i < b.size; i++ {
			if t.Chance(5) {
				b.tuples = append(b.tuples, S("doc", "d", "viewer", "group", fmt.Sprint(i), "member"))
				if t.Chance(50) {
					b.tuples = append(b.tuples, E("group", fmt.Sprint(i), "member", "user", fmt.Sprintf("m%d", i)))
				}
			} else {
				b.tuples = append(b.tuples, E("doc", "d", "viewer", "user", fmt.Sprint(i)))
			}
		}
		b.keys = []Tuple{b.tuples[0], b.tuples[len(b.tuples)-1], pick(t, b.tuples), pick(t, b.tuples)}
		for i := 0; i < 12; i++ {
			if u := pick(t, b.tuples); u.SK == 'e' {
				b.subs = append(b.subs, [2]string{"user", u.SId})
			}
		}
		b.roots = []Node{{'s', "doc", "d", "reader"}, {'s', "doc", "d", "viewer"}}
	case 4:
		b.shape, b.size = "many parents", span(60, 1500)
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "dir", Rels: rels("parent", "_this", "viewer", pick(t, []string{"_this + parent->viewer", "parent->viewer + _this"}))}}}
		for i := 0; i < b.size; i++ {
			b.tuples = append(b.tuples, E("dir", "top", "parent", "dir", fmt.Sprint(i)))
		}
		at := pick(t, []int{0, b.size - 1, t.Intn(b.size)})
		end := E("dir", fmt.Sprint(at), "viewer", "user", "u")
		b.tuples = append(b.tuples, end)
		b.keys = []Tuple{end, pick(t, b.tuples), E("dir", "top", "parent", "dir", fmt.Sprint(at))}
		b.roots = []Node{{'s', "dir", "top", "viewer"}}
	case 5:
		b.shape, b.size = "group tree", span(60, 1200)
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "group", Rels: rels("member", pick(t, []string{"_this", "_this + lead"}), "lead", "_this")}}}
		k := 2 + t.Intn(6)
		for i := 1; i < b.size; i++ {
			b.tuples = append(b.tuples, S("group", fmt.Sprint((i-1)/k), "member", "group", fmt.Sprint(i), "member"))
		}
		at := b.size - 1 - t.Intn(b.size/2)
		end := E("group", fmt.Sprint(at), "member", "user", "u")
		b.tuples = append(b.tuples, end)
		b.keys = []Tuple{end, pick(t, b.tuples)}
		b.roots = []Node{{'s', "group", "0", "member"}, {'s', "group", "1", "member"}}
	case 6:
		b.shape, b.size = "long expression", span(20, 160)
		r := &ResDef{Name: "doc"}
		var ops []string
		op := pick(t, []string{" + ", " + ", " & ", " - "})
		for i := 0; i < b.size; i++ {
			n := fmt.Sprintf("a%d", i)
			r.Rels = append(r.Rels, rels(n, "_this")...)
			ops = append(ops, n)
			if op != " + " && (op == " & " || i == 0) {
				b.tuples = append(b.tuples, E("doc", "d", n, "user", "u"))
			}
		}
		r.Rels = append(r.Rels, rels("all", strings.Join(ops, op))...)
		b.p = &Pol{ID: "p", Res: []*ResDef{user, r}}
		b.keys = []Tuple{E("doc", "d", ops[0], "user", "u"), E("doc", "d", ops[b.size-1], "user", "u"), E("doc", "d", pick(t, ops), "user", "u")}
		b.roots = []Node{{'s', "doc", "d", "all"}}
	case 7:
		// a chain of differences: whether the subject is let in depends on the parity of the rest
		b.shape, b.size = "difference chain", span(10, 200)
		b.p = &Pol{ID: "p", Res: []*ResDef{user, {Name: "level", Rels: rels("base", "_this", "next", "_this", "in", "base - next->in")}}}
		for i := 0; i < b.size; i++ {
			b.tuples = append(b.tuples, E("level", fmt.Sprint(i), "base", "user", "u"), E("level", fmt.Sprint(i), "next", "level", fmt.Sprint(i+1)))
		}
		b.keys = []Tuple{pick(t, b.tuples), pick(t, b.tuples), E("level", fmt.Sprint(b.size), "base", "user", "u")}
		b.roots = []Node{{'s', "level", "0", "in"}, {'s', "level", "1", "in"}}
	default:
		b.shape, b.size = "many relations", span(12, 80)
		b.p = &Pol{ID: "p", Res: []*ResDef{user}}
		for i := 0; i < b.size; i++ {
			b.p.Res = append(b.p.Res, &ResDef{Name: fmt.Sprintf("res%d", i), Rels: rels("owner", "_this", "viewer", "_this + owner", "up", "_this", "all", "viewer + up->all")})
			if i > 0 {
				b.tuples = append(b.tuples, E(fmt.Sprintf("res%d", i-1), "x", "up", fmt.Sprintf("res%d", i), "x"))
			}
		}
		end := E(fmt.Sprintf("res%d", b.size-1), "x", "owner", "user", "u")
		b.tuples = append(b.tuples, end)
		b.keys = []Tuple{end, pick(t, b.tuples), pick(t, b.tuples)}
		b.roots = []Node{{'s', "res0", "x", "all"}, {'s', fmt.Sprintf("res%d", b.size/2), "x", "all"}}
	}
	b.tuples = uniq(b.tuples)
	return b
}

func (b *Big) note(t *T) {
	t.Count("big "+b.shape, 1)
	t.Count("big size total", b.size)
	t.Nontrivial(fmt.Sprint("big ", b.shape, b.size, showPol(b.p), len(b.tuples)))
	t.Sample(map[string]any{"shape": b.shape, "size": b.size, "relationships": len(b.tuples)})
}

// hugeBase numbers the few cases with more than ten thousand entries.
const hugeBase, hugeSize = 7000000, 10700

func c01big(t *T)  { c01sized(t, 3000) }
func c01huge(t *T) { c01sized(t, hugeSize) }
func c04big(t *T)  { c04sized(t, 1200) }
func c04huge(t *T) { c04sized(t, hugeSize) }
func c05big(t *T)  { c05sized(t, 1500) }
func c05huge(t *T) { c05sized(t, hugeSize) }

func c01sized(t *T, limit int) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	b := bigInst(t, limit)
	load(t, s, w, &b.Inst)
	ask := func() {
		st := w.pols[b.p.ID]
		idx := st.index()
		for _, o := range b.roots {
			g := explore(st.p, idx, o)
			for _, sub := range b.subs {
				req := &api.CheckRequest{PolicyId: b.p.ID, AccessRequest: &domain.AccessRequest{Object: ent(o.Res, o.Id), Relation: o.Rel, Subject: ent(sub[0], sub[1])}}
				resp, err := s.Do(t, req)
				noPanic(t, req, err)
				if err != nil {
					t.Failf("Check failed on a %s of %d: %v\nrequest: %s", b.shape, b.size, err, show(req))
				}
				got, want := resp.(*api.CheckResponse).GetResult().GetAuthorized(), g.check(sub[0], sub[1])
				if got != want {
					t.Failf("Check says authorized=%v on a %s of %d, the policy and relationships say %v\nrequest: %s\npolicy: %s", got, b.shape, b.size, want, show(req), trunc(showPol(st.p), 1500))
				}
				if want {
					t.Count("verdict authorized", 1)
				} else {
					t.Count("verdict denied", 1)
				}
			}
		}
	}
	ask()
	for i := 0; i < 3; i++ {
		u := pick(t, b.keys)
		if _, had := w.pols[b.p.ID].tuples[u]; had {
			step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: b.p.ID, Relationship: u.proto()})
		} else {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: b.p.ID, Relationship: u.proto()})
		}
		ask()
	}
	b.note(t)
}

func c03big(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	b := bigInst(t, 500)
	load(t, s, w, &b.Inst)
	st := w.pols[b.p.ID]
	idx := st.index()
	o := b.roots[0]
	g := explore(st.p, idx, o)
	for _, sub := range b.subs[:2] {
		acc := &domain.AccessRequest{Object: ent(o.Res, o.Id), Relation: o.Rel, Subject: ent(sub[0], sub[1])}
		want := g.check(sub[0], sub[1])
		for _, format := range []api.ExplainFormat{api.ExplainFormat_JSON, api.ExplainFormat_DOT} {
			req := &api.ExplainCheckRequest{PolicyId: b.p.ID, AccessRequest: proto.Clone(acc).(*domain.AccessRequest), Format: format}
			resp, err := s.Do(t, req)
			noPanic(t, req, err)
			if err != nil {
				t.Failf("ExplainCheck failed on a %s of %d: %v\nrequest: %s", b.shape, b.size, err, show(req))
			}
			er := resp.(*api.ExplainCheckResponse)
			if er.Authorized != want || er.Format != format {
				t.Failf("ExplainCheck answers %v in format %v on a %s of %d; the verdict is %v, the format asked for %v", er.Authorized, er.Format, b.shape, b.size, want, format)
			}
			checkGoalTree(t, req, er, want, g, sub)
			t.Count(format.String()+" trees", 1)
		}
	}
	b.note(t)
}

func c04sized(t *T, limit int) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	b := bigInst(t, limit)
	load(t, s, w, &b.Inst)
	st := w.pols[b.p.ID]
	expandCase(t, s, st, st.index(), b.roots[0])
	b.note(t)
}

func c05sized(t *T, limit int) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	b := bigInst(t, limit)
	load(t, s, w, &b.Inst)
	step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: b.p.ID})
	t.Count("dumps", 1)
	t.Count("edges compared", len(w.pols[b.p.ID].tuples))
	for i := 0; i < 2; i++ {
		u := pick(t, b.keys)
		step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: b.p.ID, Relationship: u.proto()})
	}
	step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: b.p.ID})
	b.note(t)
}

// ---------------------------------------------------------------- stored data

var lengths = []int{60, 100, 127, 128, 200, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000, 8192, 20000, 70000}

// longNames draws names that have a long common prefix and differ only behind it.
func longNames(t *T, n int) []string {
	l := pick(t, lengths)
	for n > 20 && l*n > 200000 {
		l = pick(t, lengths)
	}
	prefix := strings.Repeat(pick(t, []string{"x", "ab/", "long-name-", "A", "0"}), l)[:l]
	var out []string
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			out = append(out, prefix+fmt.Sprint(i))
		case 1:
			out = append(out, prefix+fmt.Sprint(i)+prefix[:l/2])
		default:
			out = append(out, prefix+strings.Repeat("y", i))
		}
	}
	return append(out, prefix)
}

func bigPol(id string) *Pol {
	return &Pol{ID: id, Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", "_this")}, {Name: "doc", Rels: rels("owner", "_this", "viewer", "_this + owner")}, {Name: "doc2", Rels: rels("owner", "_this")}}}
}

// bigTuples draws n different relationships over a few objects and many subjects, or the reverse.
func bigTuples(t *T, n int) []Tuple {
	num := func(k, n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprint(i*k))
		}
		return out
	}
	objs, subs := num(1, 1+t.Intn(5)), num(1, n)
	switch t.Intn(4) {
	case 0:
		objs, subs = num(1, n), num(1, 1+t.Intn(4))
	case 1:
		objs = longNames(t, 6)
		n = min(n, max(30, 300000/len(objs[0])))
	case 2:
		subs = longNames(t, 40)
		objs = num(3, n/20+1)
		n = min(n, max(30, 300000/len(subs[0])))
	}
	seen := map[Tuple]bool{}
	var out []Tuple
	for tries := 0; len(out) < n && tries < 6*n; tries++ {
		u := Tuple{ORes: pick(t, []string{"doc", "doc", "doc", "doc2"}), OId: pick(t, objs), Rel: pick(t, []string{"owner", "viewer", "viewer"}), SK: 'e', SRes: "user", SId: pick(t, subs)}
		if u.ORes == "doc2" {
			u.Rel = "owner"
		}
		switch t.Intn(12) {
		case 0:
			u.SK, u.SRes, u.SRel = 's', "group", "member"
		case 1:
			u = Tuple{"group", u.OId, "member", 'e', "user", u.SId, ""}
		case 2:
			if t.Chance(10) {
				u.SK, u.SId = 'w', ""
			}
		}
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	return out
}

func bigData(t *T, i int) []byte {
	if t.Chance(2) {
		return []byte(strings.Repeat(fmt.Sprint(i, ","), pick(t, lengths)))
	}
	return []byte(fmt.Sprint("data ", i))
}

func bigSize(t *T) int {
	return pick(t, []int{70, 110, 140, 270, 300, 520, 600, 1010, 1040, 1500, 2100})
}

func c06big(t *T) {
	w := newWorld()
	s := mustEmbedded(t, &monKV{base: baseKV(t)})
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol("p").def(t, 20)})
	us := bigTuples(t, bigSize(t))
	set := func(u Tuple, i int) {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: bigData(t, i)})
	}
	for i, u := range us {
		set(u, i)
	}
	sweep(t, s, w)
	for i := 0; i < 40; i++ {
		set(pick(t, us), -i)
	}
	for i := 0; i < 60; i++ {
		u := pick(t, us)
		v := u
		switch t.Intn(3) { // names cut short or continued
		case 0:
			v.OId = v.OId[:len(v.OId)-1]
		case 1:
			v.SId += "0"
		case 2:
			v.OId += "0"
		}
		step(t, s, w, &api.GetRelationshipRequest{PolicyId: "p", Relationship: v.proto()})
		if v.SK == 'e' {
			step(t, s, w, &api.CheckRequest{PolicyId: "p", AccessRequest: accessOf(v)})
		}
		step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: v.proto()})
	}
	for i := 0; i < len(us)/8; i++ {
		step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: pick(t, us).proto()})
	}
	sweep(t, s, w)
	step(t, s, w, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: Sel{OK: 'o', ORes: us[0].ORes, OId: us[0].OId, RK: '*', SK: '*'}.proto()})
	sweep(t, s, w)
	step(t, s, w, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: anySel()})
	sweep(t, s, w)
	noteBig(t, us, 1)
}

func noteBig(t *T, us []Tuple, pols int) {
	t.Count("big relationships", len(us))
	t.Count("big policies", pols)
	t.Nontrivial(fmt.Sprint("big ", pols, us))
	t.Sample(map[string]any{"relationships": len(us), "policies": pols})
}

// dataHuge reads, selects and deletes among more than ten thousand relationships or policies.
func dataHuge(t *T) {
	w := newWorld()
	s := mustEmbedded(t, newMapKV())
	p := bigPol("p")
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 0)})
	n := hugeSize - t.Intn(200)
	var us []Tuple
	if t.Chance(40) { // policies
		for i := 0; i < n; i++ {
			step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: (&Pol{ID: fmt.Sprint("q", i)}).def(t, 0)})
		}
		step(t, s, w, &api.ListPolicyIdsRequest{})
		for i := 0; i < 50; i++ {
			id := fmt.Sprint("q", t.Intn(n))
			step(t, s, w, &api.DeletePolicyRequest{Id: id})
			step(t, s, w, &api.GetPolicyRequest{Id: id})
		}
		step(t, s, w, &api.ListPolicyIdsRequest{})
		noteBig(t, nil, n)
		return
	}
	for i := 0; i < n; i++ {
		u := Tuple{"doc", "d", "owner", 'e', "user", fmt.Sprint(i), ""}
		if i%97 == 0 {
			u.OId = "other"
		}
		us = append(us, u)
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: []byte(fmt.Sprint(i))})
	}
	one := Sel{OK: 'o', ORes: "doc", OId: "d", RK: 'n', Rel: "owner", SK: 'r', SRes: "user"}
	for _, sel := range []*domain.RelationshipSelector{anySel(), one.proto()} {
		step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: sel})
	}
	for i := 0; i < 200; i++ {
		u := pick(t, us)
		step(t, s, w, &api.GetRelationshipRequest{PolicyId: "p", Relationship: u.proto()})
	}
	step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: pick(t, us).proto()})
	if t.Chance(50) {
		step(t, s, w, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: one.proto()})
		step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySel()})
	}
	step(t, s, w, &api.DeletePolicyRequest{Id: "p"})
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 0)})
	sweep(t, s, w)
	noteBig(t, us, 1)
}

func c07big(t *T) {
	w := newWorld()
	s := mustEmbedded(t, &monKV{base: baseKV(t)})
	var pids []string
	var us []Tuple
	if t.Chance(50) { // a few large policies
		pids = pick(t, [][]string{{"p", "p/", "p/p"}, {"a", "aa", "aaa"}, longNames(t, 3)})
		us = bigTuples(t, bigSize(t)/2)
	} else { // many small ones
		n := pick(t, []int{30, 70, 110, 150, 300})
		if t.Chance(40) {
			pids = longNames(t, n)
		} else {
			for i := 0; i < n; i++ {
				pids = append(pids, fmt.Sprint("p", i))
			}
		}
		us = bigTuples(t, 5)
	}
	for _, id := range pids {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol(id).def(t, 5)})
		for i, u := range us {
			step(t, s, w, &api.SetRelationshipRequest{PolicyId: id, Relationship: u.proto(), AppData: []byte(fmt.Sprint(len(id), i))})
		}
	}
	sweep(t, s, w)
	for i := 0; i < 6; i++ {
		id := pick(t, pids)
		switch t.Intn(4) {
		case 0:
			step(t, s, w, &api.DeletePolicyRequest{Id: id})
		case 1:
			if w.pols[id] != nil {
				step(t, s, w, &api.DeleteRelationshipsRequest{PolicyId: id, Selector: anySel()})
			}
		case 2:
			step(t, s, w, &api.DeleteRelationshipRequest{PolicyId: id, Relationship: pick(t, us).proto()})
		default:
			step(t, s, w, &api.DumpRelationshipsRequest{PolicyId: id})
			if v := pick(t, us); v.SK == 'e' {
				step(t, s, w, &api.CheckRequest{PolicyId: id, AccessRequest: accessOf(v)})
			}
		}
	}
	sweep(t, s, w, pids[0])
	noteBig(t, us, len(pids))
}

func c08big(t *T) {
	w := newWorld()
	s := mustEmbedded(t, &monKV{base: baseKV(t)})
	var pids []string
	n := pick(t, []int{20, 60, 110, 140, 270, 520})
	if t.Chance(40) {
		pids = longNames(t, n)
	} else {
		for i := 0; i < n; i++ {
			pids = append(pids, fmt.Sprint(i))
		}
	}
	for i, id := range pids {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol(id).def(t, 5), AppData: bigData(t, i)})
	}
	us := bigTuples(t, bigSize(t))
	big := pick(t, pids)
	for i, u := range us {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: big, Relationship: u.proto(), AppData: bigData(t, i)})
	}
	sweep(t, s, w)
	q := bigPol(big)
	q.Res[3].Rels = append(q.Res[3].Rels, rels("viewer", "_this + owner")...)
	step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, 5), AppData: bigData(t, n)})
	for i := 0; i < n/5; i++ {
		if id := pick(t, pids); id != big {
			step(t, s, w, &api.DeletePolicyRequest{Id: id})
		}
	}
	sweep(t, s, w)
	step(t, s, w, &api.DeletePolicyRequest{Id: big})
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol(big).def(t, 5)})
	sweep(t, s, w)
	noteBig(t, us, len(pids))
}

func c11big(t *T) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	p := bigPol("p")
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: p.def(t, 20)})
	us := bigTuples(t, bigSize(t))
	for i, u := range us {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: "p", Relationship: u.proto(), AppData: []byte(fmt.Sprint(i))})
	}
	for i := 0; i < 12; i++ {
		u := pick(t, us)
		sel := Sel{OK: pick(t, []byte("*or")), ORes: u.ORes, OId: u.OId, RK: pick(t, []byte("*n")), Rel: u.Rel, SK: pick(t, []byte("*xr")), SRes: u.SRes, S: u}
		m := 0
		for _, v := range us {
			if sel.matches(v) {
				m++
			}
		}
		if m > 50 {
			t.Count("big matches", 1)
		}
		step(t, s, w, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: forms(t, sel.proto())})
		t.Count("finds", 1)
		if i%4 == 0 {
			s2 := mustEmbedded(t, kv.clone())
			w2 := w.clone()
			step(t, s2, w2, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: forms(t, sel.proto())})
			step(t, s2, w2, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySel()})
			t.Count("deletions", 1)
		}
	}
	noteBig(t, us, 1)
}

// ---------------------------------------------------------------- faults and crashes in large operations

// bigPopulate fills a store with two policies that hold the same relationships, and some others.
func bigPopulate(t *T) (*mapKV, *World, []Tuple) {
	kv := newMapKV()
	s := mustEmbedded(t, kv)
	w := newWorld()
	us := bigTuples(t, pick(t, []int{70, 110, 140, 270, 530}))
	for _, id := range []string{"p", "p2"} {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol(id).def(t, 0)})
		for i, u := range us {
			if id == "p" || i < 20 {
				step(t, s, w, &api.SetRelationshipRequest{PolicyId: id, Relationship: u.proto(), AppData: []byte(fmt.Sprint(id, i))})
			}
		}
	}
	for i, n := 0, pick(t, []int{2, 2, 70, 130}); i < n; i++ {
		step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: bigPol(fmt.Sprint("other", i)).def(t, 0)})
	}
	return kv, w, us
}

func c15big(t *T) {
	kv, w, us := bigPopulate(t)
	u := pick(t, us)
	all := Sel{OK: 'r', ORes: "doc", RK: '*', SK: '*'}.proto()
	reqs := []proto.Message{
		&api.DeletePolicyRequest{Id: "p"},
		&api.DeleteRelationshipsRequest{PolicyId: "p", Selector: pick(t, []*domain.RelationshipSelector{anySel(), all})},
		&api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: pick(t, []*domain.RelationshipSelector{anySel(), all})},
		&api.ListPolicyIdsRequest{},
		&api.DumpRelationshipsRequest{PolicyId: "p"},
		&api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{Object: ent("doc", u.OId), Relation: "viewer", Subject: ent("user", "nobody")}},
		&api.ExpandRequest{PolicyId: "p", Root: Node{'s', "doc", u.OId, "viewer"}.proto(), Format: api.ExplainFormat_JSON},
	}
	for _, i := range t.rng.Perm(len(reqs))[:3] {
		c15op(t, kv, w, reqs[i])
	}
	t.Count("big relationships", len(us))
}

func c16big(t *T) {
	kv, w, us := bigPopulate(t)
	c16op(t, kv, w, &api.DeletePolicyRequest{Id: "p"})
	c16op(t, kv, w, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: pick(t, []*domain.RelationshipSelector{anySel(), Sel{OK: 'r', ORes: "doc", RK: '*', SK: '*'}.proto()})})
	t.Count("big relationships", len(us))
}
