package main

import (
	"fmt"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

const knotBase = 8000000

// knotPol: relations of one resource defined through each other at random, so that the search runs into
// every kind of overlap of cycles, and a few relations on top that ask about several of them in one query.
func knotPol(t *T, pure bool) *Pol {
	k := 3 + t.Intn(6)
	name := func(i int) string { return fmt.Sprintf("r%d", i) }
	andPct := pick(t, []int{0, 10, 30})
	thisPct := pick(t, []int{15, 35, 60})
	ttuPct := pick(t, []int{0, 0, 25})
	lastPct := 75
	if pure { // unions of relations of one object, decided late
		k, andPct, thisPct, ttuPct, lastPct = 4+t.Intn(3), 0, 30, 0, 100
	}
	leaf := func() *Expr {
		x := name(t.Intn(k))
		if t.Chance(ttuPct) {
			return eTTU("par", x)
		}
		return eCU(x)
	}
	o := &ResDef{Name: "o"}
	add := func(n string, e *Expr) {
		o.Rels = append(o.Rels, &RelDef{Name: n, E: e, Form: pick(t, []byte{'x', 'f'}), Restr: '*'})
	}
	for i := 0; i < k; i++ {
		e := leaf()
		for n := t.Intn(3); n > 0; n-- {
			op := byte('+')
			if t.Chance(andPct) {
				op = '&'
			}
			if t.Chance(50) {
				e = eOp(e, op, leaf())
			} else {
				e = eOp(leaf(), op, e)
			}
		}
		if t.Chance(thisPct) {
			if t.Chance(lastPct) {
				e = eOp(e, '+', eThis()) // what decides comes last
			} else {
				e = eOp(eThis(), '+', e)
			}
		}
		if !pure && t.Chance(6) {
			e = eOp(e, '-', eCU("not"))
		}
		add(name(i), e)
	}
	add("par", eThis())
	add("not", eThis())
	add("none", eThis())
	for i := 0; i < 8; i++ {
		var e *Expr
		join := func(op byte, x *Expr) {
			if e == nil {
				e = x
			} else {
				e = eOp(e, op, x)
			}
		}
		if i%2 == 0 {
			// look into several relations, then ask about one
			for n := 1 + t.Intn(k); n > 0; n-- {
				join('+', eOp(leaf(), '&', eCU("none")))
			}
			join('+', leaf())
		} else {
			for n := 2 + t.Intn(3); n > 0; n-- {
				join(pick(t, []byte{'&', '&', '&', '-', '+'}), leaf())
			}
		}
		add(fmt.Sprintf("q%d", i), e)
	}
	return &Pol{ID: "p", Res: []*ResDef{{Name: "user"}, o}}
}

// c01knot asks everything about a few objects under a series of entangled policies.
func c01knot(t *T) {
	s := mustEmbedded(t, newMapKV())
	w := newWorld()
	pure := t.Chance(60)
	in := &Inst{p: knotPol(t, pure), shape: "knot", ids: []string{"0", "1"}}
	n := 2 + t.Intn(8)
	if pure {
		n = 0
	}
	for ; n > 0; n-- {
		r := fmt.Sprintf("r%d", t.Intn(4))
		switch x := t.Intn(10); {
		case x < 5:
			in.tuples = append(in.tuples, E("o", pick(t, in.ids), r, "user", pick(t, in.ids)))
		case x < 6:
			in.tuples = append(in.tuples, E("o", pick(t, in.ids), "not", "user", pick(t, in.ids)))
		case x < 8:
			in.tuples = append(in.tuples, E("o", pick(t, in.ids), "par", "o", pick(t, in.ids)))
		default:
			r2 := fmt.Sprintf("r%d", t.Intn(3))
			if in.p.rel("o", r) != nil && in.p.rel("o", r2) != nil {
				in.tuples = append(in.tuples, S("o", pick(t, in.ids), r, "o", pick(t, in.ids), r2))
			}
		}
	}
	in.tuples = uniq(append(in.tuples, E("o", "0", fmt.Sprintf("r%d", t.Intn(3)), "user", "0"), E("o", pick(t, in.ids), fmt.Sprintf("r%d", t.Intn(3)), "user", "1")))
	var ts []Tuple
	for _, u := range in.tuples {
		if in.p.allowed(u) {
			ts = append(ts, u)
		}
	}
	in.tuples = ts
	load(t, s, w, in)
	y, no, b := 0, 0, 0
	for round := 0; round < 12; round++ {
		if round > 0 {
			p := knotPol(t, pure)
			step(t, s, w, &api.UpdatePolicyRequest{PolicyDefinition: p.def(t, 0)})
			in.p = w.pols["p"].p
		}
		in.roots, in.focus = nil, [][2]string{{"user", "0"}, {"user", "1"}}
		for _, d := range in.p.Res[1].Rels {
			in.roots = append(in.roots, Node{'s', "o", "0", d.Name})
		}
		y2, n2, b2 := queryRound(t, s, w, in, 0, 0)
		y, no, b = y+y2, no+n2, b+b2
		t.Count("entangled policies", 1)
	}
	if y > 0 && no > 0 && b > 0 {
		t.Nontrivial(sigInst(in))
	}
	t.Count("shape knot", 1)
}
