package main

import (
	"fmt"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

// Inst is a policy with relationships.
type Inst struct {
	p      *Pol
	tuples []Tuple
	ids    []string
	shape  string
	focus  [][2]string // subjects that are always asked about
	roots  []Node      // object-relation pairs that are always asked about
}

// addTwins adds relationships whose nodes read like those of existing ones.
func (in *Inst) addTwins(t *T) {
	if len(in.tuples) == 0 {
		return
	}
	for n := 1 + t.Intn(4); n > 0; n-- {
		u := pick(t, in.tuples)
		v := spelled(t, u)
		if t.Chance(25) {
			switch t.Intn(3) {
			case 0:
				v.ORes, v.OId = respell(t, u.ORes, u.OId)
			case 1:
				v.OId, v.Rel = respell(t, u.OId, u.Rel)
			case 2:
				v.OId = u.OId + pick(t, separators) + u.Rel
			}
		}
		// an entity that reads like the object-relation pair of the relationship, or of another one
		if t.Chance(25) {
			w := pick(t, in.tuples)
			v = u
			v.SK, v.SRes, v.SId, v.SRel = 'e', w.ORes, w.OId+pick(t, separators)+w.Rel, ""
		}
		if !in.p.allowed(v) {
			continue
		}
		in.tuples = append(in.tuples, v)
		if v.SK == 'e' && len(in.focus) < 3 {
			in.focus = append(in.focus, [2]string{v.SRes, v.SId})
		}
		t.Count("look-alike relationships", 1)
	}
	in.tuples = uniq(in.tuples)
}

func txt(s string) *RelDef {
	e, ok := parseExpr(s)
	if !ok {
		panic("bad expression " + s)
	}
	return &RelDef{E: e, Form: 'r', Raw: s, Restr: '*'}
}

func rels(kv ...string) []*RelDef {
	var out []*RelDef
	for i := 0; i < len(kv); i += 2 {
		d := txt(kv[i+1])
		d.Name = kv[i]
		out = append(out, d)
	}
	return out
}

func E(ores, oid, rel, sres, sid string) Tuple { return Tuple{ores, oid, rel, 'e', sres, sid, ""} }
func S(ores, oid, rel, sres, sid, srel string) Tuple {
	return Tuple{ores, oid, rel, 's', sres, sid, srel}
}
func W(ores, oid, rel, sres string) Tuple { return Tuple{ores, oid, rel, 'w', sres, "", ""} }

func uniq(ts []Tuple) []Tuple {
	seen := map[Tuple]bool{}
	var out []Tuple
	for _, u := range ts {
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	return out
}

// genInst draws a policy and a relationship set: random policies over a dense set of objects, and
// the shapes access control data takes in practice (nested groups, folder hierarchies).
func genInst(t *T, hostile bool) *Inst {
	in := genShape(t, hostile)
	if hostile && t.Chance(60) || t.Chance(20) {
		in.addTwins(t)
	}
	return in
}

func genShape(t *T, hostile bool) *Inst {
	if t.Chance(6) {
		return twinInst(t)
	}
	if t.Chance(10) {
		return truthInst(t)
	}
	switch x := t.Intn(100); {
	case x < 50:
		return randomInst(t, hostile)
	case x < 70:
		return groupInst(t)
	case x < 88:
		return folderInst(t)
	}
	return mutualInst(t)
}

// truthInst is an expression over a few relations with one user for every combination of them, so
// that asking about all users reads off the expression's truth table.
func truthInst(t *T) *Inst {
	letters := []string{"a", "b", "c", "d"}[:2+t.Intn(3)]
	in := &Inst{shape: "truth", ids: []string{"o"}}
	leaf := func() *Expr {
		if t.Chance(12) {
			return eTTU("parent", pick(t, letters))
		}
		return eCU(pick(t, letters))
	}
	ops := pick(t, []string{"-", "+-", "&-", "+&-", "+&"})
	op := func() byte { return ops[t.Intn(len(ops))] }
	var tree func(n int) *Expr
	tree = func(n int) *Expr {
		if n == 0 {
			return leaf()
		}
		k := t.Intn(n)
		return eOp(tree(k), op(), tree(n-1-k))
	}
	var x *Expr
	switch n := 1 + t.Intn(5); t.Intn(4) {
	case 0: // a op b op c ...
		x = leaf()
		for ; n > 0; n-- {
			x = eOp(x, op(), leaf())
		}
	case 1: // a op (b op (c ...
		x = leaf()
		for ; n > 0; n-- {
			x = eOp(leaf(), op(), x)
		}
	default:
		x = tree(n)
	}
	doc := &ResDef{Name: "doc"}
	add := func(n string, e *Expr) {
		doc.Rels = append(doc.Rels, &RelDef{Name: n, E: e, Form: pick(t, []byte{'x', 'p', 'f'}), Restr: '*'})
	}
	add("x", x)
	add("y", eOp(eCU("x"), op(), leaf()))
	add("parent", eThis())
	for _, l := range letters {
		add(l, eThis())
	}
	in.p = &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "group", Rels: rels("member", "_this")}, doc}}
	if t.Chance(50) {
		in.tuples = append(in.tuples, E("doc", "o", "parent", "doc", pick(t, []string{"o", "q"})))
	}
	objs := []string{"o"}
	if t.Chance(40) {
		objs = append(objs, "q")
	}
	for _, o := range objs {
		for i, l := range letters {
			via := t.Chance(35)
			if via {
				in.tuples = append(in.tuples, S("doc", o, l, "group", l, "member"))
			}
			for m := 0; m < 1<<len(letters); m++ {
				if m>>i&1 == 1 {
					if via {
						in.tuples = append(in.tuples, E("group", l, "member", "user", fmt.Sprint("u", m)))
					} else {
						in.tuples = append(in.tuples, E("doc", o, l, "user", fmt.Sprint("u", m)))
					}
				}
			}
		}
	}
	for m := 0; m < 1<<len(letters); m++ {
		in.focus = append(in.focus, [2]string{"user", fmt.Sprint("u", m)})
	}
	in.roots = []Node{{'s', "doc", "o", "x"}, {'s', "doc", "o", "y"}}
	in.tuples = uniq(in.tuples)
	return in
}

func randomInst(t *T, hostile bool) *Inst {
	o := polOpts{hostile: hostile, maxRes: 3, maxRel: 4, depth: 1 + t.Intn(3), restr: 'u', diffPct: pick(t, []int{0, 10, 25}), ttuPct: pick(t, []int{10, 30, 50})}
	p := genPol(t, "p", o)
	in := &Inst{p: p, shape: "random"}
	if hostile {
		in.ids = shuffled(t, hostileIds)[:2+t.Intn(4)]
	} else {
		in.ids = plainIds[:1+t.Intn(4)]
	}
	n := t.Intn(8 + 6*len(in.ids))
	for i := 0; i < n; i++ {
		in.tuples = append(in.tuples, genTuple(t, p, in.ids, 0))
	}
	in.tuples = uniq(in.tuples)
	return in
}

func groupInst(t *T) *Inst {
	member := pick(t, []string{"_this", "_this", "_this + admin", "_this - barred", "(_this + admin) - barred", "_this & vetted"})
	p := &Pol{ID: "p", Res: []*ResDef{
		{Name: "user"},
		{Name: "group", Rels: rels("member", member, "admin", "_this", "barred", "_this", "vetted", pick(t, []string{"_this", "_this + admin", "member->vetted + _this"}))},
		{Name: "doc", Rels: rels("owner", "_this", "viewer", pick(t, []string{"_this + owner", "owner + _this", "_this"}), "banned", "_this", "reader", pick(t, []string{"viewer - banned", "(viewer - banned) + owner", "viewer & owner", "viewer - (banned - owner)", "(viewer & owner) + (viewer - banned)"}))},
	}}
	in := &Inst{p: p, shape: "groups"}
	n := 2 + t.Intn(6)
	dens := pick(t, []int{10, 25, 50, 100})
	g := func(i int) string { return fmt.Sprintf("g%d", i) }
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if t.Chance(dens) {
				in.tuples = append(in.tuples, S("group", g(i), pick(t, []string{"member", "member", "member", "admin", "vetted"}), "group", g(j), pick(t, []string{"member", "member", "admin"})))
			}
		}
		for u := 0; u < 3; u++ {
			if t.Chance(25) {
				in.tuples = append(in.tuples, E("group", g(i), pick(t, []string{"member", "admin", "barred", "vetted"}), "user", fmt.Sprint(u)))
			}
		}
		if t.Chance(6) {
			in.tuples = append(in.tuples, W("group", g(i), "member", "user"))
		}
		if t.Chance(20) {
			in.tuples = append(in.tuples, S("group", g(i), "barred", "group", g(t.Intn(n)), "admin"))
		}
	}
	for d := 0; d < 2; d++ {
		for k := 0; k < 4; k++ {
			rel := pick(t, []string{"owner", "viewer", "banned"})
			switch x := t.Intn(10); {
			case x < 6:
				in.tuples = append(in.tuples, S("doc", fmt.Sprint(d), rel, "group", g(t.Intn(n)), "member"))
			case x < 9:
				in.tuples = append(in.tuples, E("doc", fmt.Sprint(d), rel, "user", fmt.Sprint(t.Intn(3))))
			default:
				in.tuples = append(in.tuples, W("doc", fmt.Sprint(d), rel, "user"))
			}
		}
	}
	in.ids = []string{"0", "1", "2", "g0", "g1", "g2"}
	in.tuples = uniq(in.tuples)
	return in
}

func folderInst(t *T) *Inst {
	p := &Pol{ID: "p", Res: []*ResDef{
		{Name: "user"},
		{Name: "group", Rels: rels("member", "_this")},
		{Name: "folder", Rels: rels("parent", pick(t, []string{"_this", "_this", "_this + owner"}), "owner", pick(t, []string{"_this", "_this + parent->owner"}), "viewer", pick(t, []string{"_this + owner + parent->viewer", "parent->viewer + _this", "owner & parent->viewer + _this", "parent->viewer - owner + _this"}))},
		{Name: "doc", Rels: rels("parent", "_this", "owner", "_this", "viewer", pick(t, []string{"_this + owner + parent->viewer", "parent->viewer & parent->owner", "parent->viewer - parent->owner", "parent->parent + _this"}))},
	}}
	in := &Inst{p: p, shape: "folders"}
	n := 2 + t.Intn(6)
	f := func(i int) string { return fmt.Sprintf("f%d", i) }
	for i := 0; i < n; i++ {
		for k := 0; k < 1+t.Intn(3); k++ {
			switch x := t.Intn(20); {
			case x < 15:
				in.tuples = append(in.tuples, E("folder", f(i), "parent", "folder", f(t.Intn(n))))
			case x < 18:
				in.tuples = append(in.tuples, S("folder", f(i), "parent", "folder", f(t.Intn(n)), pick(t, []string{"parent", "viewer"})))
			default:
				in.tuples = append(in.tuples, W("folder", f(i), "parent", "folder"))
			}
		}
		if t.Chance(50) {
			in.tuples = append(in.tuples, E("folder", f(i), pick(t, []string{"owner", "viewer"}), "user", fmt.Sprint(t.Intn(3))))
		}
		if t.Chance(20) {
			in.tuples = append(in.tuples, S("folder", f(i), pick(t, []string{"owner", "viewer"}), "group", "0", "member"))
		}
	}
	in.tuples = append(in.tuples, E("group", "0", "member", "user", "0"), E("doc", "d", "parent", "folder", f(t.Intn(n))), E("doc", "d", "parent", "folder", f(t.Intn(n))))
	if t.Chance(50) {
		in.tuples = append(in.tuples, E("doc", "d", "owner", "user", "1"))
	}
	in.ids = []string{"0", "1", "2", "f0", "f1", "d"}
	in.tuples = uniq(in.tuples)
	return in
}

// mutualInst: relations of one object defined through each other, so that cycles run through
// operators of one object as well as through relationships.
func mutualInst(t *T) *Inst {
	ex := []string{"_this", "_this + b", "_this + c", "a & b", "b & c", "a + b", "(_this & a) + b", "_this - d", "c + (a & b)", "b + c", "(a + b) & (b + c)", "par->a", "par->b + _this", "par->a & par->b", "(par->c & a) + _this"}
	p := &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, {Name: "o", Rels: rels("a", pick(t, ex), "b", pick(t, ex), "c", pick(t, ex), "d", "_this", "par", "_this")}}}
	in := &Inst{p: p, shape: "mutual", ids: []string{"0", "1", "2"}}
	n := 3 + t.Intn(16)
	for i := 0; i < n; i++ {
		o, q := pick(t, in.ids), pick(t, in.ids)
		r, s := pick(t, []string{"a", "b", "c", "d"}), pick(t, []string{"a", "b", "c"})
		switch x := t.Intn(10); {
		case x < 3:
			in.tuples = append(in.tuples, E("o", o, r, "user", q))
		case x < 6:
			in.tuples = append(in.tuples, E("o", o, "par", "o", q))
		case r == "d":
			in.tuples = append(in.tuples, E("o", o, r, "user", q))
		default:
			in.tuples = append(in.tuples, S("o", o, r, "o", q, s))
		}
	}
	in.tuples = uniq(in.tuples)
	return in
}

// twinInst: different object-relation pairs (and entities) that read the same when their names are
// written one after the other with some separator, all of them reached by one evaluation.
func twinInst(t *T) *Inst {
	sep := pick(t, separators)
	x, y, z, w := "a", "b", "c", "d"
	r1, r2 := w, z+sep+w
	o1, o2 := x, x+sep+y
	ex := []*Expr{eThis(), eThis(), eThis(), eOp(eThis(), '+', eCU(r1)), eOp(eThis(), '-', eCU("not")), eOp(eThis(), '+', eTTU("up", r1)), eOp(eCU("not"), '+', eTTU("up", r2)), eOp(eThis(), '&', eCU(r2))}
	def := func(n string, e *Expr) *RelDef { return &RelDef{Name: n, E: e, Form: 'x', Restr: '*'} }
	p := &Pol{ID: "p", Res: []*ResDef{{Name: "user"}}}
	for _, o := range []string{o1, o2} {
		p.Res = append(p.Res, &ResDef{Name: o, Rels: []*RelDef{def(r1, pick(t, ex)), def(r2, pick(t, ex)), def("up", eThis()), def("not", eThis()), def("root", pick(t, []*Expr{eThis(), eThis(), eOp(eThis(), '+', eTTU("up", r1)), eOp(eThis(), '-', eTTU("up", r2))}))}})
	}
	nodes := [][3]string{{o2, z, r1}, {o1, y + sep + z, r1}, {o1, y, r2}, {o2, y, r1}, {o1, z, r1}}
	ents := [][2]string{{o1, y + sep + z + sep + w}, {o2, z + sep + w}, {o1, y}, {o2, z}, {o1, y + sep + z}, {"user", "1"}, {"user", "2"}}
	in := &Inst{p: p, shape: "twins", ids: []string{y, z, y + sep + z}}
	in.tuples = append(in.tuples, S(o1, "top", "root", nodes[0][0], nodes[0][1], nodes[0][2]), S(o1, "top", "root", nodes[1][0], nodes[1][1], nodes[1][2]), S(o1, "top", "root", nodes[2][0], nodes[2][1], nodes[2][2]))
	for n := 2 + t.Intn(10); n > 0; n-- {
		a, b, e := pick(t, nodes), pick(t, nodes), pick(t, ents)
		switch k := t.Intn(10); {
		case k < 4:
			in.tuples = append(in.tuples, E(a[0], a[1], a[2], e[0], e[1]))
		case k < 7:
			in.tuples = append(in.tuples, S(a[0], a[1], a[2], b[0], b[1], b[2]))
		case k < 9:
			in.tuples = append(in.tuples, E(a[0], a[1], pick(t, []string{"up", "up", "not"}), b[0], b[1]))
		default:
			in.tuples = append(in.tuples, W(a[0], a[1], pick(t, []string{r1, "up"}), pick(t, []string{o1, "user"})))
		}
	}
	in.tuples = shuffled(t, uniq(in.tuples))
	return in
}

// load creates the policy and sets the relationships, checking that both succeed.
func load(t *T, s Svc, w *World, in *Inst) {
	step(t, s, w, &api.CreatePolicyRequest{PolicyDefinition: in.p.def(t, 25)})
	for _, u := range in.tuples {
		step(t, s, w, &api.SetRelationshipRequest{PolicyId: in.p.ID, Relationship: u.proto()})
	}
}

// origins lists object-relation pairs worth asking about: those of the relationships and of every
// relation on the objects that occur.
func (in *Inst) origins(t *T, max int) []Node {
	objs := map[[2]string]bool{}
	for _, u := range in.tuples {
		objs[[2]string{u.ORes, u.OId}] = true
		if u.SK != 'w' {
			objs[[2]string{u.SRes, u.SId}] = true
		}
	}
	var out []Node
	for _, r := range in.p.Res {
		for _, d := range r.Rels {
			for _, id := range in.ids {
				objs[[2]string{r.Name, id}] = true
			}
			_ = d
		}
	}
	var keys [][2]string
	for k := range objs {
		keys = append(keys, k)
	}
	sortPairs(keys)
	for _, k := range keys {
		if r := in.p.res(k[0]); r != nil {
			for _, d := range r.Rels {
				out = append(out, Node{'s', k[0], k[1], d.Name})
			}
		}
	}
	out = shuffled(t, out)
	if len(out) > max {
		out = out[:max]
	}
	for _, r := range in.roots {
		if in.p.rel(r.Res, r.Rel) != nil { // not removed by an update
			out = append(out, r)
		}
	}
	return out
}

func (in *Inst) subjects(t *T, max int) [][2]string {
	set := map[[2]string]bool{}
	for _, u := range in.tuples {
		if u.SK == 'e' {
			set[[2]string{u.SRes, u.SId}] = true
		}
		if u.SK == 'w' {
			set[[2]string{u.SRes, "someone"}] = true
		}
	}
	set[[2]string{pick(t, in.p.Res).Name, pick(t, in.ids)}] = true
	set[[2]string{"nosuch", "x"}] = true
	var keys [][2]string
	for k := range set {
		keys = append(keys, k)
	}
	sortPairs(keys)
	keys = shuffled(t, keys)
	if len(keys) > max {
		keys = keys[:max]
	}
	for _, f := range in.focus {
		if set[f] {
			keys = append(keys, f)
		}
	}
	return keys
}
